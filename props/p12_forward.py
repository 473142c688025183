"""P12 forward price curves"""
from math import exp

from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true, raises
from vlib import gen, build

ASSUMPTIONS = ['day counts are additive (continuous yields are applied from '
               'origin)']
IPS = st.sampled_from([None, None, None, 'linear_scheme', 'log_linear_scheme',
                       'constant', 'linear', 'loglinear'])
price = st.one_of(gen.dec(0.01, 200, 0.01), st.floats(0.001, 1e5),
                  st.integers(1, 1000))


@st.composite
def cases(draw, fx=False):
    kind, base = draw(gen.kinds), draw(gen.bases)
    xs = draw(gen.axis(1, 6, 0, draw(st.sampled_from(
        [build.span_of(kind), max(8, build.span_of(kind) // 10)]))))
    spec = {'cls': 'FxForwardCurve' if fx else 'ForwardCurve', 'kind': kind,
            'base': base, 'xs': xs,
            'ys': [draw(price) for _ in xs], 'ip': draw(IPS),
            'iphow': draw(st.sampled_from(['name', 'class'])),
            'dc': draw(gen.day_counts()), 'tuple': draw(st.booleans()),
            'origin': draw(st.one_of(st.none(), st.integers(
                min(xs) - build.step_of(kind) * 4,
                max(xs) + build.step_of(kind))))}
    if fx:
        spec['dom'] = draw(build.discount_specs(kind, base))
        spec['for'] = draw(build.discount_specs(kind, base))
    else:
        how = draw(st.sampled_from(['none', 'default', 'rate', 'rate',
                                    'function', 'curve', 'curve']))
        spec['how'] = how
        if how in ('rate', 'function'):
            spec['yield'] = draw(st.one_of(gen.rates, st.just(0)))
        if how == 'curve':
            first = draw(st.booleans())
            spec['yield'] = draw(build.discount_specs(
                kind, base, min_size=2 if first else 1,
                origins='first' if first else 'before'))
    far = build.span_of(kind) // 2
    used = [x['cls'] for x in (spec.get('yield'), spec.get('dom'),
                               spec.get('for')) if isinstance(x, dict)]
    if 'ShortRateCurve' in used:
        far = 200  # goes day by day
    spec['beyond'] = draw(st.lists(st.integers(1, far), min_size=2,
                                   max_size=4))
    spec['insert'] = draw(st.one_of(st.none(), st.none(), st.tuples(
        st.integers(max(0, max(xs) - 1000), max(xs) + far), price).map(list)))
    spec['qs'] = draw(build.qs)
    return spec


def make(spec):
    """curve and its discount factor (last, n) beyond the last point"""
    c = gen.clock(spec)
    how = spec['how']
    if how == 'default':
        return build.build(spec), lambda a, b: 1.0
    if how == 'none':
        return build.build(spec, yield_curve=None), lambda a, b: 1.0
    y = spec['yield']
    if how == 'rate':
        return build.build(spec, yield_curve=y), \
            lambda a, b: exp(-y * build.tau(spec, a, b))
    if how == 'function':
        def fn(d):
            return exp(-y * (c.num(d) - 11) / float(build.step_of(c.kind)))
        return build.build(spec, yield_curve=fn), \
            lambda a, b: fn(c(b)) / fn(c(a))
    yc = build.build(y)
    return build.build(spec, yield_curve=yc), \
        lambda a, b: yc.get_discount_factor(c(a), c(b))


def make_fx(spec):
    c = gen.clock(spec)
    d, f = build.build(spec['dom']), build.build(spec['for'])
    return build.build(spec, domestic_curve=d, foreign_curve=f), \
        lambda a, b: f.get_discount_factor(c(a), c(b)) / \
        d.get_discount_factor(c(a), c(b))


def check(case, rec):
    c = gen.clock(case)
    fx = 'dom' in case
    f, df = (make_fx if fx else make)(case)
    rec.label(case['kind'], 'fx' if fx else case['how'])
    same(f.origin, c(build.origin_of(case)), 'origin')
    verify(case, f, df, rec)
    if case['insert']:
        n, y = case['insert']
        f[c(n)] = y
        new = dict(case, origin=build.origin_of(case))
        if case['origin'] is None:
            new['origin'] = min(new['origin'], n)
            if case.get('how') == 'rate' and n < min(case['xs']):
                rec.label('origin-moved')
        pts = dict(zip(case['xs'], case['ys']))
        pts[n] = y
        new['xs'], new['ys'] = list(pts), list(pts.values())
        rec.label('insert')
        verify(new, f, df, rec)


def verify(case, f, df, rec):
    c = gen.clock(case)
    last = max(case['xs'])
    p = dict(zip(case['xs'], case['ys']))
    top = max(p.values())
    for n in case['xs']:
        close(f(c(n)), p[n], 'price at its date %r' % c(n), rel=1e-9,
              scale=top * 1e-3)
    qs = [n for n in build.queries(case['xs'], case['qs']) if n <= last] + [
        last + k for k in case['beyond']]
    got = {}
    for n in qs:
        d = c(n)
        if n <= last:
            want = build.stored(case, n)
        else:
            x = df(last, n)
            want = p[last] / x
            rec.nt(abs(x - 1) > 1e-6)
        got[n] = f(d)
        close(got[n], want, 'forward price at %r' % d, rel=1e-8,
              scale=top * 1e-3)
        close2(f.get_forward_price(d), got[n], 'get_forward_price', rel=0,
               abs_=0)
    rec.nt(len(case['xs']) > 1)
    vals = f([c(n) for n in qs])
    same(list(vals), [got[n] for n in qs], 'call with list')
    vals = f(tuple(c(n) for n in qs))
    same(list(vals), [got[n] for n in qs], 'call with tuple')
    if case['kind'] == 'float':
        e = 1e-7
        a, b = f(c(last) - e), f(c(last) + e)
        if (case['ip'] or 'log_linear_scheme') != 'constant' or \
                len(case['xs']) == 1:
            close2(b, p[last], 'continuous after the last point', rel=1e-5)
            gaps = sorted(case['xs'])
            if len(gaps) > 1:
                close2(a, p[last], 'continuous before the last point',
                       rel=1e-3, scale=max(p.values()))


# ---- single prices -----------------------------------------------------------

spot_cases = st.fixed_dictionaries({
    'kind': gen.kinds, 'base': gen.bases, 'n': st.integers(-200, 3000),
    'value': st.one_of(gen.dec(0.01, 500, 0.01), st.floats(0.001, 1e6)),
    'yield': st.one_of(st.none(), gen.rates),
    'how': st.sampled_from(['price', 'fx', 'number', 'lists']),
    'int': st.booleans(),
    'at': st.lists(st.integers(-64, 64), min_size=1, max_size=4)})


def check_spot(case, rec):
    c = gen.clock(case)
    d, v = c(case['n']), case['value']
    if case['int']:
        v = float(max(1, int(v)))
    y = case['yield']
    kw = {} if y is None else {'yield_curve': y}
    how = case['how']
    rec.label(how)
    rec.nt(bool(y))
    if how in ('price', 'fx'):
        q = int(v) if case['int'] else v
        p = (dcf.Price if how == 'price' else dcf.FxRate)(q, d)
        same(float(p), v, 'float(price)')
        same(p.value, v, 'price.value')
        true(isinstance(p.value, float), 'type of price.value')
        same(p.origin, d, 'price.origin')
        f = dcf.ForwardCurve(p, **kw)
        if case['kind'] != 'int':
            # foreign curve as yield
            z = dcf.ZeroRateCurve([d], [0.0])
            g = dcf.FxForwardCurve(p, domestic_curve=z, foreign_curve=dcf.
                                   ZeroRateCurve([d], [y or 0.0]))
            same(list(g.domain), [d], 'domain of fx spot price curve')
            same(g.origin, d, 'origin of fx spot price curve')
            for k in case['at']:
                n = case['n'] + abs(k)
                close(g(c(n)), v * exp((y or 0.0) * c.yf(case['n'], n)),
                      'rate at %r of spot %r at %r' % (c(n), v, d), rel=1e-9)
    elif how == 'number':
        f = dcf.ForwardCurve(v, origin=d, **kw)
    else:
        f = dcf.ForwardCurve([d], [v], **kw)
    same(list(f.domain), [d], 'domain of spot price curve')
    same(f.origin, d, 'origin of spot price curve')
    at = [case['n'] + k * build.span_of(case['kind']) // 64
          for k in case['at']]
    for n in at + [case['n'], case['n'] + 1, case['n'] - 1]:
        t = max(0.0, c.yf(case['n'], n))
        want = v * exp((y or 0.0) * t)
        close(f(c(n)), want, 'price at %r of spot %r at %r' % (c(n), v, d),
              rel=1e-9)


FACETS = [
    Facet('forward', cases(), check, 4000,
          rule='more than one point or a growth beyond the last point'),
    Facet('fx', cases(fx=True), check, 2000,
          rule='more than one point or a growth beyond the last point'),
    Facet('spot', spot_cases, check_spot, 2000, rule='a yield is given'),
]
