"""P21 yield-to-maturity and fair rate"""
from math import exp

from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, same, true, num, fail
from vlib import gen, build, products
from props import p15_cashflows as p15

ASSUMPTIONS = [
    'the solution is known up to the precision asked for plus rounding of '
    'the present value divided by its slope',
    'prices less than rounding away from the price at a bound are skipped']
EPS = 2.3e-16
precisions = st.sampled_from([None, None, 1e-3, 1e-5, 1e-10])
bounds_ = st.one_of(st.none(), st.none(), st.tuples(
    gen.dec(-0.1, 0.05, 0.005), gen.dec(0.06, 0.3, 0.005)).map(list))


@st.composite
def ytm_cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    p = draw(products.specs(kind, base))
    if draw(st.booleans()):
        # a bond
        sign = draw(st.sampled_from([1, -1]))
        n = draw(st.sampled_from([1, 100.0, 1e6, 1e9])) * sign
        xs = draw(gen.schedules(kind))
        r = {'type': 'rate', 'kind': kind, 'base': base, 'xs': xs,
             'origin': xs[0] - draw(st.integers(1, build.step_of(kind))),
             'ys': n, 'dc': None, 'fix': None, 'pay': None,
             'rate': draw(gen.pos_rates), 'how': 'none', 'fwd': None,
             'tuple': False}
        f = {'type': 'fixed', 'kind': kind, 'base': base, 'xs': xs[-1:],
             'ys': [n], 'origin': r['origin'], 'cls': 'FixedCashFlowList',
             'tuple': False}
        p = {'type': 'legs', 'kind': kind, 'base': base, 'legs': [f, r],
             'nest': False}
    return {'kind': kind, 'base': base, 'p': p, 'y': draw(st.one_of(
        gen.dec(-0.09, 0.19, 0.001), st.floats(-0.3, 0.4))),
        'v': draw(st.one_of(st.none(), st.integers(0, 64))),
        'dc': draw(gen.day_counts(additive=True)),
        'flat': draw(st.one_of(st.none(), st.integers(-100, 400))),
        'zero': draw(st.integers(0, 7)) == 0,
        'prec': draw(precisions), 'bounds': draw(bounds_)}


def check_ytm(case, rec):
    c = gen.clock(case)
    p = case['p']
    obj = products.make(p)
    xs = products.dates(p)
    kw = {}
    if case['v'] is None:
        at = int(round(c.num(obj.origin)))
    else:
        at = products.valuation_dates(xs, [case['v']])[0]
        kw['valuation_date'] = c(at)
    fl = products.flows(p, at)
    taus = [(gen.yf(case['dc'], c, at, n), a) for n, a in fl]

    def price(y):
        return sum(a * exp(-y * t) for t, a in taus)
    y = case['y']
    scale = max([sum(abs(a) * exp(-z * t) for t, a in taus)
                 for z in (y, -0.1, 0.3)])
    want = price(y)
    if case['flat'] is not None and -0.3 < y < 0.4:
        ckw = {'day_count': gen.day_count(case['dc'])} if case['dc'] else {}
        flat = dcf.ZeroRateCurve([c(case['flat'])], [y], **ckw)
        want = close(dcf.get_present_value(obj, flat, c(at)), want,
                     'present value by flat curve', rel=1e-9, abs_=1e-9,
                     scale=scale)
    if case['zero']:
        want = 0.0
    else:
        kw['present_value'] = want
    prec = case['prec'] or 1e-7
    if case['prec']:
        kw['precision'] = prec
    lo, hi = case['bounds'] or (-0.1, 0.2)
    if case['bounds']:
        kw['bounds'] = (lo, hi)
    if case['dc']:
        kw['day_count'] = gen.day_count(case['dc'])
    rec.label(p['type'], 'default' if case['v'] is None else 'given date')
    noise = 1e-13 * scale + 1e-12
    fa, fb = price(lo) - want, price(hi) - want
    if min(abs(fa), abs(fb)) <= noise:
        rec.label('at bound')
        return
    if (fa < 0) == (fb < 0):
        rec.label('out of bounds')
        try:
            r = dcf.get_yield_to_maturity(obj, **kw)
        except Exception:
            return
        fail('yield out of bounds: got %r with price %r, expected an '
             'exception', r, want)
    got = num(dcf.get_yield_to_maturity(obj, **kw), 'yield')
    true(lo <= got <= hi, 'yield %r is not in bounds', got)
    slope = sum(abs(t * a) * exp(-got * t) for t, a in taus)
    close(price(got), want, 'present value at yield %r' % got, rel=0,
          abs_=prec * 1.001 + noise + 4 * EPS * slope)
    rec.nt(len(fl) > 1)
    if len({a > 0 for t, a in taus if t and a}) == 1 and not case['zero'] \
            and lo < y < hi:
        rec.label('unique')
        low = sum(abs(t * a) * exp(-y * t) for t, a in taus)
        if noise < 1e-6 * low:
            close(got, y, 'yield', rel=0,
                  abs_=prec * 1.001 + 4 * noise / low + 1e-15)
            # price at yield under the flat curve
            ckw = {k: kw[k] for k in ('day_count',) if k in kw}
            flat = dcf.ZeroRateCurve([c(at)], [got], **ckw)
            close(dcf.get_present_value(obj, flat, c(at)), want,
                  'present value at yield', rel=0, abs_=prec * 1.001 +
                  2 * noise + 4 * EPS * slope)


# ---- fair rate ---------------------------------------------------------------

@st.composite
def fair_cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    p = draw(products.specs(kind, base, ('rate', 'rate', 'collar')))
    how = draw(st.sampled_from(['before', 'before', 'first', 'any']))
    spec = draw(build.discount_specs(
        kind, base, origins=how, short=False,
        min_size=1 if how == 'before' else 2))
    if kind == 'bd' and len(products.dates(p)) > 8:
        spec['tenor'] = '1Y'  # cash rates compound per tenor, takes long
    return {'kind': kind, 'base': base, 'p': p, 'c': spec,
            'r': draw(st.one_of(gen.dec(-0.09, 0.19, 0.001),
                                st.floats(-0.3, 0.4))),
            'v': draw(st.one_of(st.none(), st.integers(0, 64))),
            'zero': draw(st.integers(0, 7)) == 0,
            'prec': draw(precisions), 'bounds': draw(bounds_)}


def check_fair(case, rec):
    c = gen.clock(case)
    p, spec = case['p'], case['c']
    obj, curve = products.make(p), build.build(spec)
    xs = products.dates(p)
    kw = {}
    if case['v'] is None:
        at = build.origin_of(spec)
    else:
        at = products.valuation_dates(xs, [case['v']])[0]
        kw['valuation_date'] = c(at)
    base = products.flows(dict(p, rate=0.0), at)
    one = products.flows(dict(p, rate=1.0), at)
    df = {n: curve.get_discount_factor(c(at), c(n)) for n, _ in base}
    pv0 = sum(df[n] * a for n, a in base)
    ann = sum(df[n] * (b - a) for (n, a), (_, b) in zip(base, one))
    scale = sum(df[n] * (abs(a) + abs(b)) for (n, a), (_, b) in
                zip(base, one))
    want = pv0 + case['r'] * ann
    if case['zero']:
        want = 0.0
    else:
        kw['present_value'] = want
    prec = case['prec'] or 1e-7
    if case['prec']:
        kw['precision'] = prec
    lo, hi = case['bounds'] or (-0.1, 0.2)
    if case['bounds']:
        kw['bounds'] = (lo, hi)
    rec.label(p['type'], spec['cls'])
    noise = 1e-12 * (scale + abs(want)) + 1e-12
    if abs(ann) * 0.02 <= noise:
        rec.label('no annuity')
        return
    r = (want - pv0) / ann
    tol = prec * 1.001 + 2 * noise / abs(ann) + 1e-15
    if min(abs(r - lo), abs(r - hi)) <= noise / abs(ann):
        return
    if not lo < r < hi:
        rec.label('out of bounds')
        try:
            got = dcf.get_fair_rate(obj, curve, **kw)
        except Exception:
            same(obj.fixed_rate, p['rate'], 'fixed rate after exception')
            return
        fail('fair rate out of bounds: got %r, expected an exception', got)
    got = num(dcf.get_fair_rate(obj, curve, **kw), 'fair rate')
    close(got, r, 'fair rate', rel=0, abs_=tol)
    same(obj.fixed_rate, p['rate'], 'fixed rate after call')
    obj.fixed_rate = got
    pv = dcf.get_present_value(obj, curve, kw.get('valuation_date'))
    close(pv, want, 'present value with fair rate', rel=0,
          abs_=prec * 1.001 + 2 * noise + 4 * EPS * abs(ann))
    rec.nt(len(base) > 1)


FACETS = [
    Facet('yields', ytm_cases(), check_ytm, 2500,
          rule='at least two cashflows from the valuation date on'),
    Facet('fair_rates', fair_cases(), check_fair, 2500,
          rule='at least two cashflows from the valuation date on'),
]
